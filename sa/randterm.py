"""Random interpretation of terms (after Gulwani & Necula): equality of two terms whose
normal forms differ is decided by evaluating both as expressions over randomly chosen
values of their atoms in exact arithmetic.  Only terms are evaluated, never the program.
Operators without a fixed meaning are interpreted by a random function of their operands
(congruence)."""
import random
from fractions import Fraction as Q
from .terms import *

K = 2
VALS = [Q(0), Q(1), Q(-1), Q(2), Q(-2), Q(1, 2), Q(3), Q(-3), Q(5), Q(-1, 2), Q(7, 3), Q(1)]
RECURSE = {"sum"}


class Undef(Exception):
    pass


class Eval:
    def __init__(self, seed):
        self.seed = seed
        self.memo = {}
        self.pinned = {}

    def rnd(self, key, sort):
        r = random.Random(hash((self.seed, key)))
        if sort == "b":
            return r.random() < 0.5
        if sort == "i":
            return Q(r.choice((0, 1, 2, 3, 1, 2, 5)))
        if sort == "m":
            return tuple(Q(r.choice(VALS)) + (Q(r.randint(-40, 40), 8) if r.random() < .7 else 0) for _ in range(K * K))
        if r.random() < .5:
            return r.choice(VALS)
        return Q(r.randint(-400, 400), 16)

    def ev(self, t):
        v = self.memo.get(t)
        if v is None:
            v = self._ev(t)
            self.memo[t] = v
        return v

    def mat(self, v):
        if isinstance(v, tuple):
            return v
        # a scalar in matrix position: constant matrix
        return (v,) * (K * K)

    def num(self, v):
        if isinstance(v, bool):
            return Q(int(v))
        return v

    def _ev(self, t):
        op = t.op
        if op == "num":
            return Q(t.args[0])
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "ONES":
            return (Q(1),) * (K * K)
        if op == "EYE":
            return tuple(Q(int(i == j)) for i in range(K) for j in range(K))
        if op == "inf":
            return Q(10 ** 9)
        if op == "ite":
            c = self.ev(t.args[0])
            return self.ev(t.args[1] if c else t.args[2])
        if op == "sum":
            if t.sort == "m":
                acc = [Q(0)] * (K * K)
                for c, s, m in t.args[0]:
                    f = Q(c)
                    for x, e in s:
                        f *= self.pw(self.num(self.ev(x)), e)
                    if m:
                        p = self.mat(self.ev(m[0]))
                        for x in m[1:]:
                            p = mm(p, self.mat(self.ev(x)))
                    else:
                        p = (Q(1),) * (K * K)
                    for i in range(K * K):
                        acc[i] += f * p[i]
                return tuple(acc)
            acc = Q(0)
            for c, s, m in t.args[0]:
                f = Q(c)
                for x, e in s:
                    f *= self.pw(self.num(self.ev(x)), e)
                if m:
                    raise Undef()
                acc += f
            return acc
        if op == "mprod":
            p = self.mat(self.ev(t.args[0]))
            for x in t.args[1:]:
                p = mm(p, self.mat(self.ev(x)))
            return p
        if op == "T":
            v = self.mat(self.ev(t.args[0]))
            return tuple(v[j * K + i] for i in range(K) for j in range(K))
        if op == "had":
            a, b = self.mat(self.ev(t.args[0])), self.mat(self.ev(t.args[1]))
            return tuple(x * y for x, y in zip(a, b))
        if op == "dot":
            a, b = self.mat(self.ev(t.args[0])), self.mat(self.ev(t.args[1]))
            return sum((x * y for x, y in zip(a, b)), Q(0))
        if op in ("max", "min"):
            f = max if op == "max" else min
            vs = [self.ev(x) for x in t.args]
            if any(isinstance(v, tuple) for v in vs):
                vs = [self.mat(v) for v in vs]
                return tuple(f(x) for x in zip(*vs))
            return f(self.num(v) for v in vs)
        if op in ("lt0", "eq0"):
            v = self.ev(t.args[0])
            if isinstance(v, tuple):
                return self.rnd((op, v), "b")
            return v < 0 if op == "lt0" else v == 0
        if op == "b2n":
            return Q(int(self.ev(t.args[0])))
        if op == "cwlt":
            return tuple(Q(int(x < 0)) for x in self.mat(self.ev(t.args[0])))
        if op == "cweq":
            return tuple(Q(int(x == 0)) for x in self.mat(self.ev(t.args[0])))
        if op == "cwnot":
            return tuple(Q(1) - x for x in self.mat(self.ev(t.args[0])))
        if op == "cwand":
            vs = [self.mat(self.ev(x)) for x in t.args]
            return tuple(Q(int(all(y != 0 for y in x))) for x in zip(*vs))
        if op == "sel":
            c, a, b = [self.mat(self.ev(x)) for x in t.args]
            return tuple(y if x != 0 else z for x, y, z in zip(c, a, b))
        if op == "call" and t.args[0] == "infnorm":
            return max(abs(x) for x in self.mat(self.ev(t.args[1])))
        if op == "call" and t.args[0] == "sqrt":
            v = self.ev(t.args[1])
            return abs(self.rnd(("sqrt", v), "s"))
        if op in BINDERS:
            n = self.ev(t.args[0])
            var = binder_var(t)
            key = [op, n]
            for a in t.args[1:]:
                if contains(a, var):
                    for k in (Q(0), Q(1), Q(2)):
                        e = Eval(self.seed)
                        e.pinned = {x: v for x, v in self.pinned.items() if not contains(x, var)}
                        e.memo.update(e.pinned)
                        e.memo[var] = k
                        # outer binder variables keep their value
                        for b in BND:
                            if b is not var and b in self.memo:
                                e.memo[b] = self.memo[b]
                        key.append(e.ev(a))
                else:
                    key.append(self.ev(a))
            return self.rnd(tuple(key), t.sort)
        key = [op]
        for a in t.args:
            key.append(self.ev(a) if isinstance(a, Term) else repr(a))
        if t.sort == "i" and op in ("size", "rows", "cols"):
            pass
        return self.rnd(tuple(key), t.sort)

    def pw(self, v, e):
        if e < 0 and v == 0:
            raise Undef()
        return v ** e


def mm(a, b):
    return tuple(sum((a[i * K + k] * b[k * K + j] for k in range(K)), Q(0)) for i in range(K) for j in range(K))


SCALE = 1          # the thorough tier evaluates at SCALE times as many points


def borders(*ts):
    """comparisons in the terms, each with the plain scalars it could be solved for: valuations that meet a comparison
    with equality are too rare to be left to chance"""
    out, seen, n = [], set(), {}
    for x in {x for t in ts for x in subterms(t) if x.op == "elt" and x.sort in ("s", "i")}:
        n.setdefault(x.args[0], []).append(x)
    single = {x[0] for b, x in n.items() if len(x) == 1 and b.op in ("init", "phi")}

    def plain_(x):
        return plain(x) or x in single
    def border(y):
        cs = []
        if y.op == "sum":
            cs = [(c, m[0][0]) for c, m, mm_ in y.args[0] if not mm_ and len(m) == 1 and m[0][1] == 1 and plain_(m[0][0])]
        elif plain_(y):
            cs = [(1, y)]
        if cs:
            out.append((y, cs))
        elif y.op == "sum":
            # not solvable: at least bring its variables near its constant
            for c, m, mm_ in y.args[0]:
                if not m and not mm_:
                    for x in sorted((x for x in subterms(y) if plain_(x)), key=lambda x: x.id)[:3]:
                        out.extend((add(x, num(k)), [(1, x)]) for k in (c, -c))
    for t in ts:
        for x in subterms(t):
            if x in seen:
                continue
            if x.op in ("eq0", "lt0") and x.args[0].sort in ("s", "i"):
                seen.add(x)
                border(x.args[0])
            elif x.op in ("max", "min") and x.sort in ("s", "i") and len(x.args) <= 4:
                seen.add(x)
                for i, a in enumerate(x.args):
                    for b in x.args[:i]:
                        border(add(a, neg(b)))
    return sorted(out, key=lambda z: z[0].id)


def plain(x):
    if x.op == "phi":
        return True
    if x.op != "init" or x.sort not in ("s", "i"):
        return False
    c = x.args[0]
    while c.op == "fld":
        c = c.args[0]
    return not c.args or all(not isinstance(a, Term) for a in c.args)


OFF = (Q(0), Q(0), Q(1, 64), Q(-1, 64), Q(1), Q(-1))


def meet(e, bs, r):
    """solve one or two of the comparisons for one of their scalars, on the border or just beside it"""
    for _ in range(1 if r.random() < .6 else 2):
        y, cs = r.choice(bs)
        c, x = r.choice(cs)
        if x in e.memo:
            continue
        probe = Eval(e.seed)
        probe.memo.update(e.pinned)
        probe.memo[x] = Q(0)
        try:
            v = (r.choice(OFF) - probe.ev(y)) / Q(c)
        except (Undef, TypeError, RecursionError):
            continue
        if x.sort == "i" and (v < 0 or v.denominator != 1):
            continue
        e.memo[x] = e.pinned[x] = v


def differ(a, b, n=24, more=150, budget=1.5):
    """True when some valuation separates a and b, False when none of n does, None when neither can be evaluated;
    cheap terms are tried at more points"""
    import time
    t0 = time.time()
    ran, n = 0, n * SCALE
    bs = borders(a, b)
    if bs:
        n += min(60, 8 * len(bs)) * SCALE
    more = max(more * SCALE, n)
    for k in range(more * 3):
        e = Eval(k)
        if bs and k % 2:
            meet(e, bs, random.Random(k))
        try:
            x, y = e.ev(a), e.ev(b)
        except Undef:
            continue
        except RecursionError:
            return None
        if isinstance(x, tuple) != isinstance(y, tuple):
            x, y = e.mat(x), e.mat(y)
        ran += 1
        if x != y:
            return True
        if ran >= more or ran >= n and time.time() - t0 > budget * SCALE or ran == 0 and k >= n * 3:
            break
    return False if ran else None


def valid(c, n=200):
    ran = 0
    bs = borders(c)
    for k in range(n * SCALE):
        e = Eval(k)
        if bs and k % 2:
            meet(e, bs, random.Random(k))
        try:
            if not e.ev(c):
                return False
        except Undef:
            continue
        ran += 1
    return True if ran else None


def implied(a, c, want=60, tries=3000, budget=20.0):
    """a implies c: True / False / None (the premise was hardly ever met)"""
    import time
    t0 = time.time()
    hit, want, budget = 0, want * SCALE, budget * SCALE
    bs = borders(a, c)
    for k in range(tries * SCALE):
        e = Eval(k)
        if bs and k % 2:
            meet(e, bs, random.Random(k))
        try:
            if not e.ev(a):
                continue
            hit += 1
            if not e.ev(c):
                return False
        except Undef:
            continue
        if hit >= want or time.time() - t0 > budget:
            break
    return True if hit >= 8 else None
