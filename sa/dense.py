"""Random interpretation of matrix terms at given dimensions.  Every matrix atom gets a shape and random
rational entries; blocks, updates, products, triangular parts and loops over rows or columns are evaluated
exactly.  As in randterm, terms of the summaries are evaluated, never the program."""
import random
from fractions import Fraction as Q
from .terms import *


class No(Exception):
    """the term has parts without a fixed meaning here"""


class Mat:
    __slots__ = ("r", "c", "d")

    def __init__(self, r, c, d):
        self.r, self.c, self.d = r, c, d

    def __getitem__(self, ij):
        i, j = ij
        if not (0 <= i < self.r and 0 <= j < self.c):
            raise No("index (%d,%d) of %dx%d" % (i, j, self.r, self.c))
        return self.d[i][j]

    def key(self):
        return ("M", self.r, self.c, tuple(map(tuple, self.d)))


class Flat:
    """v * ONES, or v * EYE, of whatever shape is needed"""
    __slots__ = ("v", "eye")

    def __init__(self, v, eye=False):
        self.v, self.eye = v, eye

    def to(self, r, c):
        return Mat(r, c, [[self.v if not self.eye or i == j else Q(0) for j in range(c)] for i in range(r)])

    def key(self):
        return ("F", self.v, self.eye)


def build(r, c, f):
    return Mat(r, c, [[f(i, j) for j in range(c)] for i in range(r)])


def keyof(v):
    return v.key() if isinstance(v, (Mat, Flat)) else v


def shape(a, b):
    if isinstance(a, Mat) and isinstance(b, Mat):
        if (a.r, a.c) != (b.r, b.c):
            raise No("shapes %dx%d and %dx%d" % (a.r, a.c, b.r, b.c))
    m = a if isinstance(a, Mat) else b
    return (a if isinstance(a, Mat) else a.to(m.r, m.c)), (b if isinstance(b, Mat) else b.to(m.r, m.c))


def asmat(v):
    if isinstance(v, (Mat, Flat)):
        return v
    if isinstance(v, bool):
        v = Q(int(v))
    return Flat(v)


def ew(f, *vs):
    vs = [asmat(v) for v in vs]
    ms = [v for v in vs if isinstance(v, Mat)]
    if not ms:
        if any(v.eye for v in vs):
            raise No("shape")
        return Flat(f(*[v.v for v in vs]))
    m = ms[0]
    vs = [shape(m, v)[1] for v in vs]
    return build(m.r, m.c, lambda i, j: f(*[v.d[i][j] for v in vs]))


def mul2(a, b):
    if isinstance(a, Flat) and isinstance(b, Flat):
        if a.eye:
            return Flat(a.v * b.v, b.eye)
        if b.eye:
            return Flat(a.v * b.v, a.eye)
        raise No("shape")
    if isinstance(a, Flat):
        if not a.eye:
            raise No("shape")
        return build(b.r, b.c, lambda i, j: a.v * b.d[i][j])
    if isinstance(b, Flat):
        if not b.eye:
            raise No("shape")
        return build(a.r, a.c, lambda i, j: b.v * a.d[i][j])
    if a.c != b.r:
        if (a.r, a.c) == (1, 1) or (b.r, b.c) == (1, 1):
            raise No("scalar product")
        raise No("product of %dx%d and %dx%d" % (a.r, a.c, b.r, b.c))
    return build(a.r, b.c, lambda i, j: sum((a.d[i][k] * b.d[k][j] for k in range(a.c)), Q(0)))


def inverse(m):
    n = m.r
    if n != m.c:
        raise No("inverse of a rectangular matrix")
    a = [list(m.d[i]) + [Q(int(i == j)) for j in range(n)] for i in range(n)]
    for k in range(n):
        p = next((i for i in range(k, n) if a[i][k] != 0), None)
        if p is None:
            raise No("singular")
        a[k], a[p] = a[p], a[k]
        x = a[k][k]
        a[k] = [y / x for y in a[k]]
        for i in range(n):
            if i != k and a[i][k] != 0:
                f = a[i][k]
                a[i] = [y - f * z for y, z in zip(a[i], a[k])]
    return Mat(n, n, [row[n:] for row in a])


def inpart(mode, i, j):
    """(kept, implicit value)"""
    low = "Lower" in mode
    if i == j:
        return ("Unit" not in mode and "Strictly" not in mode), (Q(1) if "Unit" in mode else Q(0))
    return ((i > j) == low), Q(0)


class DEval:
    def __init__(self, seed, dims, ints=None, vals=None, funcs=None, loops=None):
        self.seed, self.dims = seed, dims
        self.memo = {}
        self.funcs = funcs or {}
        self.loops = loops or {}
        for t, v in (ints or {}).items():
            self.memo[t] = Q(v) if isinstance(v, (int, Q)) and not isinstance(v, bool) else v
        for t, v in (vals or {}).items():
            self.memo[t] = v
        self.base = dict(self.memo)

    def ev(self, t):
        v = self.memo.get(t)
        if v is None:
            v = self._ev(t)
            self.memo[t] = v
        return v

    def int(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            v = Q(int(v))
        if not isinstance(v, Q) or v.denominator != 1:
            raise No("not an integer: " + show(t, 4))
        return int(v)

    def scalar(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return Q(int(v))
        if isinstance(v, Flat) and not v.eye:
            return v.v
        if isinstance(v, Mat):
            if (v.r, v.c) == (1, 1):
                return v.d[0][0]
            raise No("matrix in scalar position")
        return v

    def mat(self, t):
        return asmat(self.ev(t))

    def shaped(self, t):
        v = self.mat(t)
        if isinstance(v, Mat):
            return v
        raise No("shape of " + show(t, 4))

    def atom(self, t):
        rnd = random.Random(hash((self.seed, t.id)))
        num_ = lambda: Q(rnd.choice((1, -1)) * rnd.randint(1, 9), rnd.choice((1, 1, 2, 3)))
        if t.sort == "b":
            return rnd.random() < .5
        if t.sort == "i":
            d = self.dims(t)
            if d is None or t.sort == "i" and not isinstance(d, (int, Q)):
                raise No("integer " + show(t, 4))
            return Q(d)
        if t.sort in ("m", "mi", "o"):
            d = self.dims(t)
            if d is None or t.sort == "i" and not isinstance(d, (int, Q)):
                raise No("shape of " + show(t, 4))
            return build(d[0], d[1], lambda i, j: num_())
        return num_()

    def over(self, body, var, k):
        """value of body with the bound variable at k"""
        e = DEval(self.seed, self.dims, None, None, self.funcs, self.loops)
        e.base = self.base
        e.memo.update(self.base)
        for b in BND:
            if b in self.memo:
                e.memo[b] = self.memo[b]
        e.memo[var] = Q(k)
        return e.ev(body)

    def sweep(self, lid):
        """follow a loop from its entry: (values at the head of the last iteration, values after it, its index)"""
        key = ("sweep", lid)
        if key in self.memo:
            return self.memo[key]
        lc = self.loops[lid]
        phis = {c: p for c, p in lc.phis.items() if p is not None and p.op == "phi"}
        cur = {}
        for c, p in phis.items():
            e0 = lc.entry.store.get(c)
            try:
                cur[c] = self.ev(e0 if e0 is not None else mk("init", c, sort=p.sort))
            except No as x:
                cur[c] = x
        n = self.int(lc.N) if lc.N is not None else None
        head, back, breaks, rets = lc.recs
        outs = [b.pc for b in breaks if b is not None] + [s.pc for s, v in rets if s is not None]
        k = 0
        while True:
            if k > 60:
                raise No("long loop")
            heads = cur
            if n is not None and k >= n:
                break
            e = DEval(self.seed, self.dims, None, None, self.funcs, self.loops)
            e.base = dict(self.base)
            for b in BND:
                if b in self.memo:
                    e.base[b] = self.memo[b]
            if lc.bv is not None:
                e.base[lc.bv] = Q(k)
            for c, p in phis.items():
                if not isinstance(cur[c], No):
                    e.base[p] = cur[c]
            e.bad = {p: cur[c] for c, p in phis.items() if isinstance(cur[c], No)}
            e.bad.update(self.bad)
            e.memo.update(e.base)
            if n is None:
                if back is None or e.ev(back.pc) is not True:
                    break
            elif any(e.ev(x) is True for x in outs if x is not FALSE):
                break
            if back is None:
                raise No("loop without a back edge")
            nxt = {}
            for c, p in phis.items():
                b = lc.back.get(c)
                try:
                    nxt[c] = cur[c] if b is None else e.ev(constrain(b, back.pc) if back.pc is not TRUE else b)
                except No as x:
                    nxt[c] = x
            cur = nxt
            k += 1
        r = self.memo[key] = (heads, cur, k)
        return r

    bad = {}

    def _ev(self, t):
        op = t.op
        if op in ("phi", "phiout", "first") and t.args[0] in self.loops:
            if t in self.bad:
                raise self.bad[t]
            lc = self.loops[t.args[0]]
            h, a, k = self.sweep(t.args[0])
            if op == "first":
                return Q(k)
            v = (h if op == "phi" else a).get(t.args[1])
            if v is None or isinstance(v, No):
                raise v or No("loop value")
            return v
        if op == "num":
            return Q(t.args[0])
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "ONES":
            return Flat(Q(1))
        if op == "EYE":
            return Flat(Q(1), True)
        if op == "inf":
            return Q(10 ** 12)
        if op == "ite":
            c = self.ev(t.args[0])
            if not isinstance(c, bool):
                raise No("condition")
            return self.ev(t.args[1] if c else t.args[2])
        if op == "sum":
            acc = None
            for c, s, m in t.args[0]:
                f = Q(c)
                for x, e in s:
                    y = self.scalar(x)
                    if e < 0 and y == 0:
                        raise No("division by zero")
                    f *= y ** e
                if not m and t.sort != "m":
                    v = f
                else:
                    p = self.mat(m[0]) if m else Flat(Q(1))
                    for x in m[1:]:
                        p = mul2(p, self.mat(x))
                    v = ew(lambda a: f * a, p) if not (isinstance(p, Flat) and p.eye) else Flat(f * p.v, True)
                if acc is None:
                    acc = v
                elif isinstance(acc, Q) and isinstance(v, Q):
                    acc = acc + v
                else:
                    a, b = asmat(acc), asmat(v)
                    if isinstance(a, Flat) and isinstance(b, Flat):
                        if a.eye != b.eye:
                            raise No("shape")
                        acc = Flat(a.v + b.v, a.eye)
                    else:
                        acc = ew(lambda x, y: x + y, a, b)
            return acc if acc is not None else Q(0)
        if op == "mprod":
            p = self.mat(t.args[0])
            for x in t.args[1:]:
                p = mul2(p, self.mat(x))
            return p
        if op == "T":
            v = self.mat(t.args[0])
            return v if isinstance(v, Flat) else build(v.c, v.r, lambda i, j: v.d[j][i])
        if op == "had":
            return ew(lambda a, b: a * b, self.ev(t.args[0]), self.ev(t.args[1]))
        if op == "dot":
            a, b = shape(self.mat(t.args[0]), self.mat(t.args[1])) if self._same(t) else self._colrow(t)
            return sum((a.d[i][j] * b.d[i][j] for i in range(a.r) for j in range(a.c)), Q(0))
        if op in ("max", "min"):
            f = max if op == "max" else min
            vs = [self.ev(x) for x in t.args]
            if any(isinstance(v, (Mat, Flat)) for v in vs):
                return ew(lambda *a: f(a), *vs)
            return f(vs)
        if op in ("lt0", "eq0"):
            v = self.scalar(t.args[0])
            return v < 0 if op == "lt0" else v == 0
        if op == "b2n":
            return Q(int(self.ev(t.args[0])))
        if op == "idiv":
            a, b = self.int(t.args[0]), self.int(t.args[1])
            if b == 0:
                raise No("division by zero")
            return Q(int(a / b) if a * b < 0 else a // b)
        if op == "call" and t.args[0] == "idiv":
            a, b = self.int(t.args[1]), self.int(t.args[2])
            if b == 0:
                raise No("division by zero")
            return Q(abs(a) // abs(b) * (1 if a * b >= 0 else -1))
        if op == "blk":
            m = self.mat(t.args[0])
            r, c, nr, nc = [self.int(x) for x in t.args[1:]]
            if isinstance(m, Flat):
                if m.eye and r != c:
                    raise No("shape")
                return m.to(nr, nc)
            if r < 0 or c < 0 or nr < 0 or nc < 0 or r + nr > m.r or c + nc > m.c:
                raise No("block outside the matrix")
            return build(nr, nc, lambda i, j: m.d[r + i][c + j])
        if op == "seg":
            m = self.mat(t.args[0])
            o, n = self.int(t.args[1]), self.int(t.args[2])
            if isinstance(m, Flat):
                return m.to(n, 1)
            if o < 0 or n < 0 or o + n > m.r * m.c or m.c != 1 and m.r != 1:
                raise No("segment outside the vector")
            return build(n, 1, lambda i, j: m.d[o + i][0]) if m.c == 1 else build(1, n, lambda i, j: m.d[0][o + j])
        if op == "diagv":
            m = self.mat(t.args[0])
            if isinstance(m, Flat):
                return Flat(m.v)
            return build(min(m.r, m.c), 1, lambda i, j: m.d[i][i])
        if op == "asdiag":
            m = self.shaped(t.args[0])
            n = max(m.r, m.c)
            return build(n, n, lambda i, j: (m.d[i][0] if m.c == 1 else m.d[0][i]) if i == j else Q(0))
        if op == "cwinv":       # inverse of a diagonal matrix
            m = self.mat(t.args[0])
            if isinstance(m, Flat):
                raise No("shape")
            if any(m.d[i][i] == 0 for i in range(m.r)):
                raise No("singular")
            return build(m.r, m.c, lambda i, j: 1 / m.d[i][i] if i == j else Q(0))
        if op == "minv":
            m = self.mat(t.args[0])
            if isinstance(m, Flat):
                raise No("shape")
            return inverse(m)
        if op == "tri":
            m = self.mat(t.args[1])
            if isinstance(m, Flat):
                raise No("shape")
            mode = t.args[0]

            def f(i, j):
                k, v = inpart(mode, i, j)
                return m.d[i][j] if k else v
            return build(m.r, m.c, f)
        if op == "symm":
            m = self.shaped(t.args[1])
            low = "Lower" in t.args[0]
            return build(m.r, m.c, lambda i, j: m.d[i][j] if (i >= j) == low or i == j else m.d[j][i])
        if op == "perm":        # the matrix with column k the unit vector of index p(k)
            p = self.shaped(t.args[0])
            n = p.r
            idx = [int(p.d[k][0]) for k in range(n)]
            return build(n, n, lambda i, j: Q(int(idx[j] == i)))
        if op == "permidx":
            m = self.shaped(t.args[0])
            return build(m.c, 1, lambda i, j: Q(next((k for k in range(m.r) if m.d[k][i] != 0), -1)))
        if op == "upd":
            return self.upd(t.args[0], t.args[1], self.ev(t.args[2]))
        if op == "updn":
            var = binder_var(t)
            n = self.int(t.args[0])
            old = self.mat(t.args[3])
            for k in range(n):
                ds = subst(t.args[1], {var: num(k)})
                old = self.put(old, ds, self.over(t.args[2], var, k))
            return old
        if op == "comp":
            var = binder_var(t)
            n = self.int(t.args[0])
            vs = [self.over(t.args[1], var, k) for k in range(n)]
            if any(not isinstance(v, Q) for v in vs):
                raise No("components")
            return build(n, 1, lambda i, j: vs[i])
        if op == "psum":
            var = binder_var(t)
            n = self.int(t.args[0])
            vs = [self.over(t.args[1], var, k) for k in range(n)]
            if any(isinstance(v, (Mat, Flat)) for v in vs):
                acc = vs[0]
                for v in vs[1:]:
                    acc = ew(lambda a, b: a + b, acc, v)
                return acc
            return sum(vs, Q(0))
        if op in ("pall", "pmax", "pmin"):
            if any(x.op == "phi" and x.args[0] in self.loops and x not in self.memo for x in subterms(t.args[1])):
                raise No("loop condition")
            var = binder_var(t)
            n = self.int(t.args[0])
            vs = [self.over(t.args[1], var, k) for k in range(n)]
            if op == "pall":
                return all(vs)
            raise No(op)
        if op == "elt":
            m = self.mat(t.args[0])
            ix = [self.int(x) for x in t.args[1:]]
            if isinstance(m, Flat):
                return m.v if not m.eye or len(ix) == 2 and ix[0] == ix[1] else Q(0)
            if len(ix) == 1:
                ix = [ix[0], 0] if m.c == 1 else [0, ix[0]] if m.r == 1 else [ix[0] % m.r, ix[0] // m.r]
            return m[ix[0], ix[1]]
        if op in ("rows", "cols", "size"):
            m = self.mat(t.args[0])
            if isinstance(m, Flat):
                raise No("shape")
            return Q(m.r if op == "rows" else m.c if op == "cols" else m.r * m.c)
        if op == "cw":
            f = {"cwiseInverse": lambda x: 1 / x, "square": lambda x: x * x, "cwiseSign": lambda x: Q((x > 0) - (x < 0)),
                 "sign": lambda x: Q((x > 0) - (x < 0))}.get(t.args[0])
            if f is None:
                raise No(t.args[0])
            try:
                return ew(f, self.ev(t.args[1]))
            except ZeroDivisionError:
                raise No("division by zero")
        if op == "cw2":
            try:
                return ew(lambda a, b: a / b, self.ev(t.args[1]), self.ev(t.args[2]))
            except ZeroDivisionError:
                raise No("division by zero")
        if op == "cwlt":
            return ew(lambda a: Q(int(a < 0)), self.ev(t.args[0]))
        if op == "cweq":
            return ew(lambda a: Q(int(a == 0)), self.ev(t.args[0]))
        if op == "cwnot":
            return ew(lambda a: 1 - a, self.ev(t.args[0]))
        if op == "cwand":
            return ew(lambda *a: Q(int(all(a))), *[self.ev(x) for x in t.args])
        if op == "sel":
            return ew(lambda c, a, b: a if c else b, *[self.ev(x) for x in t.args])
        if op == "call" and t.args[0] == "infnorm":
            m = self.shaped(t.args[1])
            return max([abs(x) for r in m.d for x in r] + [Q(0)])
        if op == "call" and t.args[0] == "sum":
            m = self.shaped(t.args[1])
            return sum((x for r in m.d for x in r), Q(0))
        if op == "linspaced":
            n, a, b = self.int(t.args[0]), self.scalar(t.args[1]), self.scalar(t.args[2])
            return build(n, 1, lambda i, j: a + i * (b - a) / (n - 1) if n > 1 else b)
        if op == "sized":
            v = self.mat(t.args[0])
            ds = [self.int(x) for x in t.args[1:] if isinstance(x, Term)]
            if isinstance(v, Flat):
                return v.to(ds[0], ds[1] if len(ds) > 1 else 1)
            return v
        f = self.funcs.get(op) or (self.funcs.get(t.args[0]) if op in ("call", "out") and t.args else None)
        if f is not None:
            return f(self, t)
        if op in ("init", "phi", "any", "bv", "local", "param"):
            return self.atom(t)
        raise No("operator %s" % show(t, 3))

    def _same(self, t):
        a, b = self.mat(t.args[0]), self.mat(t.args[1])
        return not (isinstance(a, Mat) and isinstance(b, Mat)) or (a.r, a.c) == (b.r, b.c)

    def _colrow(self, t):
        a, b = self.mat(t.args[0]), self.mat(t.args[1])
        if (a.r, a.c) == (b.c, b.r) and 1 in (a.r, a.c):
            return a, build(b.c, b.r, lambda i, j: b.d[j][i])
        raise No("dot of different shapes")

    def upd(self, old, d, new):
        return self.put(self.mat(old), d, new)

    def put(self, m, d, new):
        if isinstance(m, Flat):
            raise No("shape")
        D = [list(r) for r in m.d]
        args = [self.int(x) for x in d.args if isinstance(x, Term)]
        if d.op == "velt":
            if len(args) == 1:
                args = [args[0], 0] if m.c == 1 else [0, args[0]] if m.r == 1 else [args[0] % m.r, args[0] // m.r]
            if isinstance(new, (Mat, Flat)):
                new = asmat(new).to(1, 1).d[0][0] if isinstance(new, Flat) else new[0, 0]
            if isinstance(new, bool):
                new = Q(int(new))
            if not (0 <= args[0] < m.r and 0 <= args[1] < m.c):
                raise No("store outside the matrix")
            D[args[0]][args[1]] = new
            return Mat(m.r, m.c, D)
        if d.op == "vT":
            v = asmat(new)
            return v if isinstance(v, Flat) else build(v.c, v.r, lambda i, j: v.d[j][i])
        if d.op == "vseg":
            o, n = args
            cells = [(o + i, 0) for i in range(n)] if m.c == 1 else [(0, o + i) for i in range(n)]
            if m.c != 1 and m.r != 1:
                raise No("segment of a matrix")
            v = asmat(new)
            if isinstance(v, Flat):
                v = v.to(n, 1)
            if v.r * v.c != n:
                raise No("shapes")
            for k, (i, j) in enumerate(cells):
                if not (0 <= i < m.r and 0 <= j < m.c):
                    raise No("store outside the vector")
                D[i][j] = v.d[k][0] if v.c == 1 else v.d[0][k]
            return Mat(m.r, m.c, D)
        if d.op == "vdiag":
            n = min(m.r, m.c)
            v = asmat(new)
            if isinstance(v, Flat):
                v = v.to(n, 1)
            if v.r * v.c != n:
                raise No("shapes")
            for k in range(n):
                D[k][k] = v.d[k][0] if v.c == 1 else v.d[0][k]
            return Mat(m.r, m.c, D)
        if d.op == "vtri":
            mode = d.args[0]
            v = asmat(new)
            if isinstance(v, Flat):
                v = v.to(m.r, m.c)
            if (v.r, v.c) != (m.r, m.c):
                raise No("shapes")
            for i in range(m.r):
                for j in range(m.c):
                    if inpart(mode, i, j)[0]:
                        D[i][j] = v.d[i][j]
            return Mat(m.r, m.c, D)
        if d.op == "vblk":
            r, c, nr, nc = args
            if r < 0 or c < 0 or r + nr > m.r or c + nc > m.c:
                raise No("block outside the matrix")
            v = asmat(new)
            if isinstance(v, Flat):
                v = v.to(nr, nc)
            if (v.r, v.c) != (nr, nc):
                if (v.c, v.r) == (nr, nc) and 1 in (nr, nc):
                    w, v = v, None
                    v = build(nr, nc, lambda i, j: w.d[j][i])
                else:
                    raise No("shapes %dx%d into %dx%d" % (v.r, v.c, nr, nc))
            for i in range(nr):
                for j in range(nc):
                    D[r + i][c + j] = v.d[i][j]
            return Mat(m.r, m.c, D)
        raise No("view " + d.op)


def compare(got, want, cases, mask=None, n=2, vals=None, funcs=None, loops=None):
    """cases: list of (dims callback, {int term: value}).  mask(i, j, r, c): entries that matter.
    -> True / False / None, detail"""
    import os
    done = 0
    why = ""
    lp = {lc.id: lc for lc in loops} if loops else None
    for dims, ints in cases:
        for k in range(n):
            e = DEval(k, dims, ints, vals, funcs, lp)
            try:
                a = asmat(e.ev(got))
                b = asmat(e.ev(want))
                if isinstance(a, Flat) and isinstance(b, Flat):
                    if a.key() != b.key():
                        return False, "%s instead of %s with %s" % (a.v, b.v, label(ints))
                    done += 1
                    continue
                a, b = shape(a, b)
            except No as x:
                why = str(x)
                return None, why
            except (RecursionError, ArithmeticError, LookupError, TypeError, ValueError, AttributeError, StopIteration) as x:
                return None, repr(x)[:100]
            for i in range(b.r):
                for j in range(b.c):
                    if (mask is None or mask(i, j, b.r, b.c)) and a.d[i][j] != b.d[i][j]:
                        return False, "entry (%d,%d) is %s instead of %s with %s" % (i, j, a.d[i][j], b.d[i][j], label(ints))
            done += 1
    return (True if done else None), why


def label(ints):
    return ", ".join("%s=%s" % (show(t, 3), v if not isinstance(v, Mat) else v.d) for t, v in ints.items())
