"""Progress of loops: counted loops end by construction, the others need a measure."""
from .terms import *
from .solverlib import ini, F, THIS


def implies(a, b):
    return or_(not_(a), b)


def literal_options(u, t, pos):
    """the term with in-class literal defaults of the solver's tuning members substituted"""
    mp = {}
    for x in subterms(t):
        if x.op == "init" and x.args[0].op == "fld" and x.args[0].args[0] is THIS and x.args[0].args[1] in pos and x.sort == "s":
            mp[x] = num(Fraction(pos[x.args[0].args[1]]).limit_denominator(10 ** 20))
    return subst(t, mp)


def varies(t, lc):
    return any(x.op == "phi" and x.args[0] == lc.id or x.op in ("opaque", "clob", "phiout") for x in subterms(t))


def conjuncts(c, pol=True):
    """linear atoms that hold whenever c does"""
    out = []
    for x in subterms(c):
        if x.op == "lt0":
            out.append(x)
    return out


def phi_of(lc, c):
    """the symbol a loop uses for a cell at its head"""
    p = lc.phis.get(c)
    if p is not None:
        for x in subterms(p):
            if x.op == "phi" and x.args[0] == lc.id and x.args[1] is c:
                return x
    return mk("phi", lc.id, c, sort="i")
